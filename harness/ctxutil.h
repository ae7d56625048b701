// Helpers on contexts shared by the harnesses.
#ifndef VF_CTXUTIL_H_
#define VF_CTXUTIL_H_
#include "problem.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/path.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "ruy/tune.h"
#include "vf.h"

namespace vf {

// Makes the context believe in the given CPU cache sizes, so that small
// problems exercise every work-splitting strategy.
inline void SetCaches(ruy::Context* ctx, int local, int last) {
  auto& p = const_cast<ruy::CpuCacheParams&>(ruy::get_ctx(ctx)->mutable_cpuinfo()->CacheParams());
  p.local_cache_size = local;
  p.last_level_cache_size = last;
}
inline void RandomCaches(Rng& rng, ruy::Context* ctx) {
  int local = 1 << rng.range(9, 22);
  int last = local << rng.range(0, 6);
  SetCaches(ctx, local, last);
}

}  // namespace vf
#endif
