// Multiplications compiled for given sets of code paths.
#ifndef VF_SETS_H_
#define VF_SETS_H_
namespace ruy {
class Context;
}
namespace vf {
struct SetInfo {
  int mask;
  // type: 0 = float, 1 = int8 x int8 -> int32.
  // Column-major operands of the given sizes, no strides.
  void (*run)(int type, const void* lhs, const void* rhs, void* dst, int rows, int depth, int cols, ruy::Context*);
};
extern const SetInfo kSets[];
extern const int kNumSets;
}  // namespace vf
#endif
