// Run-time described multiplications, generators and the independent oracles.
#ifndef VF_PROBLEM_H_
#define VF_PROBLEM_H_

#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "vf.h"

namespace ruy {
class Context;
}

namespace vf {

enum class T : int { f32, f64, i8, u8, i16, i32 };
int SizeOf(T t);
bool IsFloat(T t);
const char* Name(T t);
std::int64_t Lowest(T t);
std::int64_t Highest(T t);

enum { kRowMajor = 0, kColMajor = 1 };
enum { kChRow = 0, kChCol = 1 };

struct MatSpec {
  T type = T::f32;
  int rows = 0, cols = 0;
  int order = kColMajor;
  int stride = 0;
  int zp = 0;
  int cache_policy = 0;
  void* data = nullptr;
  std::int64_t Off(int r, int c) const {
    return order == kColMajor ? r + std::int64_t(c) * stride : std::int64_t(r) * stride + c;
  }
  // Number of elements from the first to the last entry, inclusive.
  std::int64_t Extent() const {
    int outer = order == kColMajor ? cols : rows, inner = order == kColMajor ? rows : cols;
    return std::int64_t(outer - 1) * stride + inner;
  }
  double GetF(int r, int c) const;
  std::int64_t GetI(int r, int c) const;
  void SetI(int r, int c, std::int64_t v);
};

struct ParamSpec {
  const void* bias = nullptr;  // accumulator type
  bool uniform = true;         // quantized destinations only
  bool set_multiplier = true;
  std::int32_t mult = 0;
  int exponent = 0;
  const std::int32_t* mult_pc = nullptr;
  const int* exp_pc = nullptr;
  bool has_clamp = false;
  double clamp_min_f = 0, clamp_max_f = 0;
  int clamp_min_i = 0, clamp_max_i = 0;
  int channel_dim = kChRow;
  int cap_rounding = 1;
  int mix = 0;  // misuse: 1..4 = uniform and per-channel multipliers together
};

struct Call {
  int combo = 0;
  MatSpec lhs, rhs, dst;
  ParamSpec mp;
  bool dst_const = false;  // misuse: destination given as constant data
};

struct ComboInfo {
  const char* name;
  T lhs, rhs, acc, dst;
  // compiled: 0 = default set through the two-argument-free entry point,
  // 1 = all paths including the internal variants.
  void (*run)(const Call&, ruy::Context*, int compiled);
};
extern const ComboInfo kCombos[];
extern const int kNumCombos;
const ComboInfo& ComboOf(const Call& c);
bool Quantized(const Call& c);  // integer destination narrower than 32 bit
bool RawInt(const Call& c);
bool FloatCombo(const Call& c);
int ComboByName(const char* name);

// Runs through the public entry point.
void RunMul(const Call& c, ruy::Context* ctx, int compiled = 1);

// Code paths this CPU can run, as single bits (includes internal variants).
std::vector<int> UsablePaths(bool with_variants = true);
int UsableMask();  // all usable paths of the default set
const char* PathName(int bit);

// --------------------------------------------------------------- generation
struct GenOpts {
  std::vector<int> combos;        // allowed combos; empty = all
  std::int64_t max_macs = 1 << 20;
  int max_dim = 300;
  Guard guard_in = Guard::kHeap, guard_out = Guard::kHeap;
  bool random_guard = false;      // choose guard side per buffer
  bool allow_strides = true;
  bool allow_bias = true;
  bool dyadic = false;            // float data with exactly representable sums
  bool special_floats = false;    // allow denormals etc.
  int cache_policies = 0;         // nonzero: random cache policies
  int force_rows = 0, force_cols = 0, force_depth = 0;
  bool bounded = false;           // integer data small enough for any depth
  bool wide_strides = false;      // strides beyond 65536 bytes
};

struct Prob {
  Call call;
  GuardBuf lhs_buf, rhs_buf, dst_buf, bias_buf, mult_buf, exp_buf;
  bool exact_float = false;
  Call* operator->() { return &call; }
  std::string Describe() const;
  std::uint64_t ShapeHash() const;
  int Channels() const { return call.mp.channel_dim == kChRow ? call.dst.rows : call.dst.cols; }
  int Capacity() const {
    int c = Channels(), r = call.mp.cap_rounding;
    return (c + r - 1) / r * r;
  }
};

// Picks a shape with residual-biased dimensions.
void PickShape(Rng& rng, std::int64_t max_macs, int max_dim, int* rows, int* cols, int* depth);
void Generate(Rng& rng, const GenOpts& o, Prob* p);
// Fills the parts of the buffer outside matrix entries with given byte noise.
void FillDst(Rng& rng, Prob* p);
void FillMatrix(Rng& rng, const MatSpec& m, int style, std::int64_t lo, std::int64_t hi, bool dyadic);

// Snapshot of the destination entries only (row by row).
std::vector<std::uint8_t> Entries(const MatSpec& m);
// Snapshot of the whole extent.
std::vector<std::uint8_t> Raw(const MatSpec& m);

// --------------------------------------------------------------- oracles
// Exact integer accumulator of an entry (including bias).
std::int64_t ExactAccum(const Call& c, int r, int col);
// All accumulators, row-major order of the destination.
void ExactAccums(const Call& c, std::vector<std::int64_t>* out);
std::int64_t RoundedScale(std::int64_t acc, std::int32_t mult, int exponent);
// Multiplier of a channel.
void MultiplierOf(const Call& c, int r, int col, std::int32_t* m, int* e);
int ClampMin(const Call& c);
int ClampMax(const Call& c);

// Checks the destination contents against the oracle.  Returns "" or a
// description of the first mismatch.  `tol` = allowed units for quantized
// destinations.
struct Ref {
  std::vector<std::int64_t> acc;     // integer combos
  std::vector<double> val, bound;    // float combos
  std::vector<std::int64_t> q;       // quantized: unclamped scaled + zero point
};
void ComputeRef(const Prob& p, Ref* ref);
std::string CheckDst(const Prob& p, const Ref& ref, int tol);

// Sets up a context-independent thread/strategy/path configuration.
struct Config {
  int path = 0;  // 0 = leave default
  int threads = 1;
  bool force_max = false;
  int tuning = 0;
  int spin_ms = -1;
};
void Apply(const Config& cfg, ruy::Context* ctx);
std::string Describe(const Config& cfg);

}  // namespace vf
#endif
