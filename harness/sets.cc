#include "sets.h"

#include <cstdint>

#include "ruy/ruy.h"

namespace vf {
namespace {
template <int kMask, typename S, typename A, typename D>
void Run(const void* lhs, const void* rhs, void* dst, int rows, int depth, int cols, ruy::Context* ctx) {
  ruy::Matrix<S> l, r;
  ruy::Matrix<D> d;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kColMajor, l.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, r.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, d.mutable_layout());
  l.set_data(static_cast<const S*>(lhs));
  r.set_data(static_cast<const S*>(rhs));
  d.set_data(static_cast<D*>(dst));
  ruy::MulParams<A, D> mp;
  ruy::Mul<static_cast<ruy::Path>(kMask)>(l, r, mp, ctx, &d);
}
template <int kMask>
void RunSet(int type, const void* lhs, const void* rhs, void* dst, int rows, int depth, int cols, ruy::Context* ctx) {
  if (type == 0) Run<kMask, float, float, float>(lhs, rhs, dst, rows, depth, cols, ctx);
  else Run<kMask, std::int8_t, std::int32_t, std::int32_t>(lhs, rhs, dst, rows, depth, cols, ctx);
}
}  // namespace
#define S(m) {m, &RunSet<m>}
const SetInfo kSets[] = {S(0x01), S(0x11), S(0x21), S(0x41), S(0x31), S(0x51), S(0x61), S(0x71), S(0x7f), S(0x0f), S(0x25), S(0x4b)};
const int kNumSets = sizeof(kSets) / sizeof(kSets[0]);
}  // namespace vf
