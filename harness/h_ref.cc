// Monitors over the reference multiplication and the public description of
// matrices and parameters (P26).
//   mode ref   : every entry of the reference multiplication compared with the
//                oracle, buffers guarded
//   mode access: addresses, values and printed form of single entries, settings
//                read back
#include <limits>
#include <sstream>

#include "problem.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "vf.h"

using namespace vf;

namespace {

std::vector<std::uint8_t> Bytes(const GuardBuf& b) {
  const std::uint8_t* d = b.as<std::uint8_t>();
  return std::vector<std::uint8_t>(d, d + b.bytes());
}

void RefMode(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = index % 11 == 0 ? 300000 : 30000;
  o.max_dim = index % 11 == 0 ? 400 : 120;
  o.random_guard = true;
  o.guard_in = o.guard_out = Guard::kEnd;
#ifdef VF_SANITIZED
  o.bounded = true;  // no wrapping of intermediate sums
#endif
  Prob p;
  Generate(rng, o, &p);
  Ref ref;
  ComputeRef(p, &ref);
  if (!FloatCombo(p.call))
    for (std::int64_t a : ref.acc)
      if (a > 2147483647ll || a < -2147483648ll) { Count("skipped_out_of_domain"); return; }
  if (Quantized(p.call))
    for (std::int64_t q : ref.q)
      if (q > 2147483647ll - 70000 || q < -2147483648ll + 70000) { Count("skipped_out_of_domain"); return; }
  FillDst(rng, &p);
  const std::vector<std::uint8_t> before = Bytes(p.dst_buf);
  GuardBuf* const inputs[] = {&p.lhs_buf, &p.rhs_buf, &p.bias_buf, &p.mult_buf, &p.exp_buf};
  std::vector<std::vector<std::uint8_t>> in;
  for (const GuardBuf* b : inputs) in.push_back(Bytes(*b));
  SetContext("reference %s", p.Describe().c_str());
  if (rng.chance(1, 60)) Sample("reference " + p.Describe());
  RunMul(p.call, nullptr);
  Tick();
  const Call& c = p.call;
  std::string err = CheckDst(p, ref, 0);
  if (!err.empty()) Violation("reference-value", "%s; %s", err.c_str(), p.Describe().c_str());
  for (std::size_t i = 0; i < in.size(); i++)
    if (Bytes(*inputs[i]) != in[i]) Violation("reference-input", "input %d was modified; %s", int(i), p.Describe().c_str());
  // Everything in the destination that is not an entry.
  std::vector<std::uint8_t> after = Bytes(p.dst_buf);
  const int sz = SizeOf(c.dst.type);
  for (int r = 0; r < c.dst.rows; r++)
    for (int j = 0; j < c.dst.cols; j++) memcpy(&after[c.dst.Off(r, j) * sz], &before[c.dst.Off(r, j) * sz], sz);
  if (after != before) Violation("reference-gap", "bytes between the destination's entries were modified; %s", p.Describe().c_str());
  for (const GuardBuf* b : {&p.lhs_buf, &p.rhs_buf, &p.dst_buf})
    if (!b->CheckCanaries()) Violation("reference-outside", "bytes around a buffer were modified; %s", p.Describe().c_str());
  Count("reference_muls");
  Count("entries", std::uint64_t(c.dst.rows) * c.dst.cols);
  if (FloatCombo(c)) Count("float_muls"); else if (RawInt(c)) Count("raw_muls"); else Count("quantized_muls");
  if (!FloatCombo(c) && !c.mp.uniform) Count("per_channel_muls");
  if (c.mp.channel_dim == kChCol) Count("column_channels");
  Distinct("problems", p.ShapeHash());
}

template <typename S>
void Access(Rng& rng, const char* name) {
  const bool col_major = rng.chance(1, 2), simple = rng.chance(1, 3);
  const int rows = rng.chance(1, 8) ? rng.range(100, 3000) : rng.range(1, 60);
  const int cols = rng.range(1, rows > 60 ? 12 : 60);
  const int inner = col_major ? rows : cols, outer = col_major ? cols : rows;
  const int stride = simple ? inner : inner + rng.range(0, 30);
  const std::size_t n = std::size_t(outer - 1) * stride + inner;
  GuardBuf buf(n * sizeof(S), rng.chance(1, 2) ? Guard::kEnd : Guard::kStart, sizeof(S));
  S* base = buf.as<S>();
  for (std::size_t i = 0; i < n; i++) base[i] = static_cast<S>(rng.range(-128, 127));
  const ruy::Order order = col_major ? ruy::Order::kColMajor : ruy::Order::kRowMajor;
  ruy::Matrix<S> m;
  if (m.data() || m.layout().rows() || m.layout().cols() || m.layout().stride() || m.zero_point() != 0 || m.cache_policy() != ruy::CachePolicy::kNeverCache)
    Violation("access-default", "a new matrix of %s is not empty", name);
  if (simple) ruy::MakeSimpleLayout(rows, cols, order, m.mutable_layout());
  else {
    // in any order
    const int first = rng.range(0, 3);
    for (int k = 0; k < 4; k++) switch ((first + k) % 4) {
      case 0: m.mutable_layout()->set_rows(rows); break;
      case 1: m.mutable_layout()->set_cols(cols); break;
      case 2: m.mutable_layout()->set_stride(stride); break;
      default: m.mutable_layout()->set_order(order); break;
    }
  }
  const S zp = std::is_floating_point<S>::value ? S(0) : static_cast<S>(rng.range(-128, 127));
  const auto policy = static_cast<ruy::CachePolicy>(rng.range(0, 3));
  m.set_zero_point(zp);
  m.set_cache_policy(policy);
  const bool writable = rng.chance(1, 2);
  if (rng.chance(1, 4)) m.set_data(nullptr);
  if (writable) m.set_data(base); else m.set_data(static_cast<const S*>(base));
  const ruy::Matrix<S> copy = m;  // matrices are descriptions, copies describe the same
  char text[160];
  snprintf(text, sizeof text, "%s %dx%d stride %d %s-major%s", name, rows, cols, stride, col_major ? "column" : "row", writable ? "" : " const");
  SetContext("access %s", text);
  for (const ruy::Matrix<S>* v : {const_cast<const ruy::Matrix<S>*>(&m), &copy}) {
    if (v->layout().rows() != rows || v->layout().cols() != cols || v->layout().stride() != stride || v->layout().order() != order)
      Violation("access-layout", "%s: reads back as %dx%d stride %d order %d", text, v->layout().rows(), v->layout().cols(), v->layout().stride(), int(v->layout().order()));
    if (v->zero_point() != zp || v->cache_policy() != policy) Violation("access-settings", "%s: zero point or cache policy reads back changed", text);
    if (v->data() != base) Violation("access-data", "%s: data pointer reads back changed", text);
  }
  if (writable && m.data() != base) Violation("access-data", "%s: data pointer reads back changed", text);
  std::ostringstream want;
  for (int r = 0; r < rows; r++) {
    for (int c = 0; c < cols; c++) {
      const std::size_t off = col_major ? r + std::size_t(c) * stride : std::size_t(r) * stride + c;
      if (ruy::ElementPtr(copy, r, c) != base + off || (writable && ruy::ElementPtr(&m, r, c) != base + off) ||
          ruy::Offset(copy.layout(), r, c) != static_cast<int>(off)) {
        Violation("access-address", "%s: entry (%d,%d) is addressed wrongly", text, r, c);
        return;
      }
      if (ruy::Element(copy, r, c) != base[off]) {
        Violation("access-value", "%s: entry (%d,%d) reads wrongly", text, r, c);
        return;
      }
      if (rows * cols <= 4000) want << static_cast<double>(base[off]) << " ";
      Count("accesses");
    }
    want << "\n";
  }
  if (writable) {  // a write reaches that entry alone
    const std::vector<std::uint8_t> before = Bytes(buf);
    const int r = rng.range(0, rows - 1), c = rng.range(0, cols - 1);
    const std::size_t off = col_major ? r + std::size_t(c) * stride : std::size_t(r) * stride + c;
    const S old = base[off];
    *ruy::ElementPtr(&m, r, c) = static_cast<S>(old + 1);
    if (base[off] != static_cast<S>(old + 1)) Violation("access-write", "%s: a write to entry (%d,%d) went elsewhere", text, r, c);
    base[off] = old;
    if (Bytes(buf) != before) Violation("access-write", "%s: a write to entry (%d,%d) changed others", text, r, c);
    Count("writes");
  }
  if (rows * cols <= 4000) {
    std::ostringstream got;
    got << copy;
    Count("prints");
    if (got.str() != want.str()) Violation("access-print", "%s: printed form differs", text);
  }
  Distinct("layouts", Mix(Mix(rows, cols), Mix(stride, Mix(col_major, sizeof(S)))));
}

template <typename D>
void Params(Rng& rng, const char* name) {
  ruy::MulParams<std::int32_t, D> mp;
  if (mp.bias() || mp.multiplier_fixedpoint_perchannel() || mp.multiplier_exponent_perchannel() || mp.clamp_min() != std::numeric_limits<D>::lowest() ||
      mp.clamp_max() != std::numeric_limits<D>::max() || mp.channel_dimension() != ruy::ChannelDimension::kRow || mp.perchannel_buffers_capacity_rounding() != 1)
    Violation("params-default", "defaults of parameters for %s", name);
  static const std::int32_t values[4] = {};
  static const int exps[4] = {};
  const std::int32_t* bias = rng.chance(1, 2) ? values : nullptr;
  const bool per = rng.chance(1, 2), exponent_first = rng.chance(1, 2);
  const std::int32_t mult = rng.range(1, 2147483647);
  const int e = rng.range(-31, 31);
  const D lo = static_cast<D>(rng.range(-100, 0)), hi = static_cast<D>(rng.range(1, 120));
  const auto ch = rng.chance(1, 2) ? ruy::ChannelDimension::kRow : ruy::ChannelDimension::kCol;
  const int cap = 1 << rng.range(0, 14);
  mp.set_bias(bias);
  if (exponent_first) { if (per) mp.set_multiplier_exponent_perchannel(exps); else mp.set_multiplier_exponent(e); }
  if (per) mp.set_multiplier_fixedpoint_perchannel(values); else mp.set_multiplier_fixedpoint(mult);
  if (!exponent_first) { if (per) mp.set_multiplier_exponent_perchannel(exps); else mp.set_multiplier_exponent(e); }
  mp.set_clamp_min(lo);
  mp.set_clamp_max(hi);
  mp.set_channel_dimension(ch);
  mp.set_perchannel_buffers_capacity_rounding(cap);
  const ruy::MulParams<std::int32_t, D> c = mp;
  if (c.bias() != bias || c.clamp_min() != lo || c.clamp_max() != hi || c.channel_dimension() != ch || c.perchannel_buffers_capacity_rounding() != cap)
    Violation("params-settings", "parameters for %s read back changed", name);
  if (c.multiplier_fixedpoint_perchannel() != (per ? values : nullptr) || c.multiplier_exponent_perchannel() != (per ? exps : nullptr) ||
      c.multiplier_fixedpoint() != (per ? 0 : mult) || c.multiplier_exponent() != (per ? 0 : e))
    Violation("params-multiplier", "%s multiplier for %s reads back changed", per ? "per-channel" : "uniform", name);
  Count("parameter_sets");
}

template <typename D>
void FloatParams(Rng& rng, const char* name) {
  ruy::MulParams<D, D> mp;
  if (mp.bias() || !(mp.clamp_min() == -std::numeric_limits<D>::infinity()) || !(mp.clamp_max() == std::numeric_limits<D>::infinity()))
    Violation("params-default", "defaults of parameters for %s", name);
  static const D values[4] = {};
  const D lo = static_cast<D>(-rng.unit()), hi = static_cast<D>(rng.unit());
  const int cap = 1 << rng.range(0, 14);
  mp.set_bias(values);
  mp.set_clamp_min(lo);
  mp.set_clamp_max(hi);
  mp.set_channel_dimension(ruy::ChannelDimension::kCol);
  mp.set_perchannel_buffers_capacity_rounding(cap);
  const ruy::MulParams<D, D> c = mp;
  if (c.bias() != values || c.clamp_min() != lo || c.clamp_max() != hi || c.channel_dimension() != ruy::ChannelDimension::kCol ||
      c.perchannel_buffers_capacity_rounding() != cap)
    Violation("params-settings", "parameters for %s read back changed", name);
  Count("parameter_sets");
}

void AccessMode(long, Rng& rng) {
  switch (rng.range(0, 5)) {
    case 0: Access<float>(rng, "float"); FloatParams<float>(rng, "float"); break;
    case 1: Access<double>(rng, "double"); FloatParams<double>(rng, "double"); break;
    case 2: Access<std::int8_t>(rng, "int8"); Params<std::int8_t>(rng, "int8"); break;
    case 3: Access<std::uint8_t>(rng, "uint8"); Params<std::uint8_t>(rng, "uint8"); break;
    case 4: Access<std::int16_t>(rng, "int16"); Params<std::int16_t>(rng, "int16"); break;
    default: Access<std::int32_t>(rng, "int32"); break;
  }
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "access") AccessMode(index, rng);
                else RefMode(index, rng);
              });
}
