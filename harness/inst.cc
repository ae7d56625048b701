// One instantiation of the public entry point per type combination
// (-DVF_COMBO=n selects it), or of the reference multiplication
// (-DVF_REFERENCE).
#include "combos.h"
#include "problem.h"
#ifdef VF_REFERENCE
#include "ruy/reference_mul.h"
#endif
#include "ruy/ruy.h"

namespace vf {
namespace {

template <typename S>
void SetMat(const MatSpec& m, bool is_const, ruy::Matrix<S>* out) {
  out->mutable_layout()->set_rows(m.rows);
  out->mutable_layout()->set_cols(m.cols);
  out->mutable_layout()->set_stride(m.stride);
  out->mutable_layout()->set_order(m.order == kColMajor ? ruy::Order::kColMajor : ruy::Order::kRowMajor);
  if (is_const)
    out->set_data(static_cast<const S*>(m.data));
  else
    out->set_data(static_cast<S*>(m.data));
  out->set_zero_point(static_cast<S>(m.zp));
  out->set_cache_policy(static_cast<ruy::CachePolicy>(m.cache_policy));
}

template <typename Acc, typename Dst, bool kFloat = std::is_floating_point<Dst>::value,
          bool kRaw = std::is_same<Dst, std::int32_t>::value>
struct Fill {  // quantized
  static void Do(const ParamSpec& p, ruy::MulParams<Acc, Dst>* mp) {
    mp->set_bias(static_cast<const Acc*>(p.bias));
    static const std::int32_t some_mult[1] = {1 << 30};
    static const int some_exp[1] = {1};
    if (p.mix == 1) {
      mp->set_multiplier_fixedpoint(some_mult[0]);
      mp->set_multiplier_fixedpoint_perchannel(some_mult);
    } else if (p.mix == 2) {
      mp->set_multiplier_exponent(some_exp[0]);
      mp->set_multiplier_exponent_perchannel(some_exp);
    } else if (p.mix == 3) {
      mp->set_multiplier_fixedpoint_perchannel(some_mult);
      mp->set_multiplier_fixedpoint(some_mult[0]);
    } else if (p.mix == 4) {
      mp->set_multiplier_exponent_perchannel(some_exp);
      mp->set_multiplier_exponent(some_exp[0]);
    }
    if (p.set_multiplier) {
      if (p.uniform) {
        mp->set_multiplier_fixedpoint(p.mult);
        mp->set_multiplier_exponent(p.exponent);
      } else {
        mp->set_multiplier_fixedpoint_perchannel(p.mult_pc);
        mp->set_multiplier_exponent_perchannel(p.exp_pc);
      }
    }
    if (p.has_clamp) {
      mp->set_clamp_min(static_cast<Dst>(p.clamp_min_i));
      mp->set_clamp_max(static_cast<Dst>(p.clamp_max_i));
    }
  }
};
template <typename Acc, typename Dst>
struct Fill<Acc, Dst, true, false> {
  static void Do(const ParamSpec& p, ruy::MulParams<Acc, Dst>* mp) {
    mp->set_bias(static_cast<const Acc*>(p.bias));
    if (p.has_clamp) {
      mp->set_clamp_min(static_cast<Dst>(p.clamp_min_f));
      mp->set_clamp_max(static_cast<Dst>(p.clamp_max_f));
    }
  }
};
template <typename Acc, typename Dst>
struct Fill<Acc, Dst, false, true> {
  static void Do(const ParamSpec& p, ruy::MulParams<Acc, Dst>* mp) {
    mp->set_bias(static_cast<const Acc*>(p.bias));
  }
};

template <typename L, typename R, typename A, typename D>
void RunImpl(const Call& c, ruy::Context* ctx, int compiled) {
  ruy::Matrix<L> lhs;
  ruy::Matrix<R> rhs;
  ruy::Matrix<D> dst;
  SetMat(c.lhs, true, &lhs);
  SetMat(c.rhs, true, &rhs);
  SetMat(c.dst, c.dst_const, &dst);
  ruy::MulParams<A, D> mp;
  Fill<A, D>::Do(c.mp, &mp);
  mp.set_channel_dimension(c.mp.channel_dim == kChRow ? ruy::ChannelDimension::kRow : ruy::ChannelDimension::kCol);
  mp.set_perchannel_buffers_capacity_rounding(c.mp.cap_rounding);
  ruy::MulParams<A, D> before = mp;
#ifdef VF_REFERENCE
  (void)compiled;
  (void)ctx;
  ruy::ReferenceMul(lhs, rhs, mp, &dst);
#else
  if (compiled == 0)
    ruy::Mul(lhs, rhs, mp, ctx, &dst);
  else
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, mp, ctx, &dst);
#endif
  if (before.bias() != mp.bias() || before.channel_dimension() != mp.channel_dimension() ||
      before.multiplier_fixedpoint_perchannel() != mp.multiplier_fixedpoint_perchannel() ||
      before.multiplier_exponent_perchannel() != mp.multiplier_exponent_perchannel())
    Violation("params-changed", "the caller's parameters were modified");
}

}  // namespace

#define VF_X(n, name, l, r, a, d) VF_X##n(name, l, r, a, d)
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)

void VF_CAT(RunCombo, VF_COMBO)(const Call& c, ruy::Context* ctx, int compiled) {
  RunImpl<VF_CAT(VF_L, VF_COMBO), VF_CAT(VF_R, VF_COMBO), VF_CAT(VF_A, VF_COMBO), VF_CAT(VF_D, VF_COMBO)>(c, ctx, compiled);
}

}  // namespace vf
