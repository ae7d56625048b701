From a111db524ba675c33577e61fb4b15b9f49aa2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:57 +0000
Subject: [PATCH 01/11] fix: report per-channel reallocation only when a buffer
 was reallocated

The advisory was raised whenever the channel count had to be rounded up,
even if the caller supplied no bias and no per-channel multipliers.
---
 ruy/create_trmul_params.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ruy/create_trmul_params.h b/ruy/create_trmul_params.h
index 531e066..3a7b37e 100644
--- a/ruy/create_trmul_params.h
+++ b/ruy/create_trmul_params.h
@@ -278,7 +278,7 @@ template <typename AccumScalar, typename DstScalar,
               std::is_same<AccumScalar, std::int32_t>::value &&
               !std::is_same<DstScalar, std::int32_t>::value>
 struct EnsurePerChannelBuffersLargeEnoughImpl {
-  static void Run(const TrMulParams& params, Allocator* allocator,
+  static bool Run(const TrMulParams& params, Allocator* allocator,
                   MulParams<AccumScalar, DstScalar>* mul_params) {
     const Side channel_side =
         mul_params->channel_dimension() == ChannelDimension::kRow ? Side::kLhs
@@ -291,6 +291,7 @@ struct EnsurePerChannelBuffersLargeEnoughImpl {
     // We should have already checked earlier for the case where
     // user_capacity >= required_capacity.
     RUY_DCHECK_GT(required_capacity, user_capacity);
+    bool reallocated = false;
     if (mul_params->bias()) {
       AccumScalar* new_data =
           allocator->Allocate<AccumScalar>(required_capacity);
@@ -299,6 +300,7 @@ struct EnsurePerChannelBuffersLargeEnoughImpl {
       std::memset(new_data + user_size, 0,
                   (required_capacity - user_size) * sizeof(AccumScalar));
       mul_params->set_bias(new_data);
+      reallocated = true;
     }
     if (mul_params->multiplier_fixedpoint_perchannel()) {
       AccumScalar* new_data =
@@ -308,6 +310,7 @@ struct EnsurePerChannelBuffersLargeEnoughImpl {
       std::memset(new_data + user_size, 0,
                   (required_capacity - user_size) * sizeof(AccumScalar));
       mul_params->set_multiplier_fixedpoint_perchannel(new_data);
+      reallocated = true;
     }
     if (mul_params->multiplier_exponent_perchannel()) {
       int* new_data = allocator->Allocate<int>(required_capacity);
@@ -316,13 +319,15 @@ struct EnsurePerChannelBuffersLargeEnoughImpl {
       std::memset(new_data + user_size, 0,
                   (required_capacity - user_size) * sizeof(int));
       mul_params->set_multiplier_exponent_perchannel(new_data);
+      reallocated = true;
     }
+    return reallocated;
   }
 };
 
 template <typename AccumScalar, typename DstScalar>
 struct EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar, false> {
-  static void Run(const TrMulParams& params, Allocator* allocator,
+  static bool Run(const TrMulParams& params, Allocator* allocator,
                   MulParams<AccumScalar, DstScalar>* mul_params) {
     const Side channel_side =
         mul_params->channel_dimension() == ChannelDimension::kRow ? Side::kLhs
@@ -335,6 +340,7 @@ struct EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar, false> {
     // We should have already checked earlier for the case where
     // user_capacity >= required_capacity.
     RUY_DCHECK_GT(required_capacity, user_capacity);
+    bool reallocated = false;
     if (mul_params->bias()) {
       AccumScalar* new_data =
           allocator->Allocate<AccumScalar>(required_capacity);
@@ -343,7 +349,9 @@ struct EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar, false> {
       std::memset(new_data + user_size, 0,
                   (required_capacity - user_size) * sizeof(AccumScalar));
       mul_params->set_bias(new_data);
+      reallocated = true;
     }
+    return reallocated;
   }
 };
 
@@ -366,10 +374,11 @@ void EnsurePerChannelBuffersLargeEnough(
   if (required_capacity <= user_capacity) {
     return;
   }
-  ctx->set_performance_advisory(
-      PerformanceAdvisory::kReallocatedPerChannelBuffer);
-  EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(
-      params, ctx->GetMainAllocator(), mul_params);
+  if (EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(
+          params, ctx->GetMainAllocator(), mul_params)) {
+    ctx->set_performance_advisory(
+        PerformanceAdvisory::kReallocatedPerChannelBuffer);
+  }
 }
 
 // Ensures that `params->mul_params_bytes` contains MulParams data that's ready
-- 
2.43.0


From 39bf6a51c8bc0ec296d5571eb922c6d797cfb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:38 +0000
Subject: [PATCH 02/11] fix: account for float entries correctly when ejecting
 them from the cache

Packed float matrices have no sums buffer, so inserting one adds only its
data size to the total. Ejecting one also subtracted the size of the sums
buffer it never had, so the total drifted below the memory actually held.
---
 ruy/prepacked_cache.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..ee47c99 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -23,19 +23,26 @@ namespace ruy {
 
 namespace {
 
+// Returns the total size of the buffers that AllocateBuffers allocates for the
+// given packed matrix.
+std::ptrdiff_t AllocatedBytes(const PEMat& packed_matrix) {
+  std::ptrdiff_t bytes = DataBytes(packed_matrix);
+  if (!packed_matrix.sums_type.is_floating_point) {
+    bytes += SumsBytes(packed_matrix);
+  }
+  return bytes;
+}
+
 // Allocates the `data` and `sums` buffers, and sets the corresponding
 // pointer fields, in a PEMat whose other fields, particularly `layout`
 // and the runtime data types, are already populated.
 std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
-  const std::ptrdiff_t data_bytes = DataBytes(*packed_matrix);
-  packed_matrix->data = detail::SystemAlignedAlloc(data_bytes);
-  std::ptrdiff_t sums_bytes = 0;
+  packed_matrix->data = detail::SystemAlignedAlloc(DataBytes(*packed_matrix));
   if (!packed_matrix->sums_type.is_floating_point) {
     // Integer quantized matrices also need the `sums` buffer.
-    sums_bytes = SumsBytes(*packed_matrix);
-    packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
+    packed_matrix->sums = detail::SystemAlignedAlloc(SumsBytes(*packed_matrix));
   }
-  return data_bytes + sums_bytes;
+  return AllocatedBytes(*packed_matrix);
 }
 
 // Frees the `data` and `sums` buffers held by a PEMat.
@@ -121,7 +128,7 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= AllocatedBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From 7d9cda80fadb8c99908696abea530f4370a1feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:22 +0000
Subject: [PATCH 03/11] fix: distinguish different views of the same buffer in
 the prepacked cache

The cache key held only the data pointer, the packed layout and the zero
point. Views of one buffer with another storage order, stride, type, or
size rounding up to the same packed size shared an entry, so a
multiplication could use a packed matrix made from a different view.
---
 ruy/prepacked_cache.cc         | 12 +++++++++-
 ruy/prepacked_cache.h          | 41 +++++++++++++++++++++-------------
 ruy/prepare_packed_matrices.cc |  2 +-
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index ee47c99..ca114d5 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -85,10 +85,20 @@ PrepackedCache::~PrepackedCache() {
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
                                            PEMat* packed_matrix) {
+  EMat src;
+  src.data = const_cast<void*>(src_data);
+  return Get(src, packed_matrix);
+}
+
+PrepackedCache::Action PrepackedCache::Get(const EMat& src,
+                                           PEMat* packed_matrix) {
   // Construct a Key and look up the cache.
   Key key;
-  key.src_data = src_data;
+  key.src_data = src.data;
+  key.src_layout = src.layout;
+  key.src_type = src.data_type;
   key.packed_layout = packed_matrix->layout;
+  key.packed_type = packed_matrix->data_type;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
 
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..b978cda 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -52,31 +52,38 @@ class PrepackedCache final {
   // (since they are used to determine whether to allocate a new buffer).
   // So they instead use the source matrix's data pointer. On the other hand,
   // the packed matrix's layout structure is already available by the time we
-  // need to handle Keys, and that's fortunate because it is more specific
-  // than the source matrix's layout: it also encodes details about the kernel's
-  // small-scale block layout. In the past, we made the kernel function pointer
-  // part of the cache key, but all that is relevant here is the packed layout.
+  // need to handle Keys: it encodes details about the kernel's small-scale block
+  // layout. In the past, we made the kernel function pointer part of the cache
+  // key, but all that is relevant here is the packed layout.
+  //
+  // The packed layout does not determine which source entries were packed, as
+  // it is the same for different storage orders and strides of the source
+  // matrix, and its dimensions have been rounded up. So the source matrix's
+  // layout and data type are also part of the key.
   //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
   // data would be reused with different zero_point values.
-  //
-  // The data types (PEMat::data_type and PEMat::sums_type) are omitted based on
-  // the "strict aliasing" model: each memory location should contain data of
-  // only one type. This could be relaxed in the future, by adding data types
-  // to this Key type, if a use case arises.
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
-    // The packed matrix's layout, see PEMat::layout.
+    // The source matrix's layout and data type.
+    MatLayout src_layout;
+    Type src_type;
+    // The packed matrix's layout and data type, see PEMat.
     PMatLayout packed_layout;
+    Type packed_type;
     // The packed matrix's zero point (for integer-quantized matrices only).
     std::int32_t zero_point;
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout.rows == b.src_layout.rows &&
+           a.src_layout.cols == b.src_layout.cols &&
+           a.src_layout.stride == b.src_layout.stride &&
+           a.src_layout.order == b.src_layout.order &&
+           a.src_type == b.src_type && a.packed_layout == b.packed_layout &&
+           a.packed_type == b.packed_type && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -108,14 +115,14 @@ class PrepackedCache final {
 
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
-  // `src_data` is the source matrix data pointer.
+  // `src` is the source matrix.
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src` matrix and the
+  //    relevant fields of `packed_matrix`, particularly its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -124,6 +131,10 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
+  Action Get(const EMat& src, PEMat* packed_matrix);
+
+  // Variant of the above for a source matrix that is sufficiently identified by
+  // its data pointer and the packed matrix's layout.
   Action Get(const void* src_data, PEMat* packed_matrix);
 
  private:
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..1f41c61 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,7 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      auto action = cache->Get(params->src[side], &packed_matrix);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From e48da6b95ed62f590d238f0d356aad65095e12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:24 +0000
Subject: [PATCH 04/11] fix: never eject a prepacked matrix that the same
 multiplication uses

When both operands are cached and together exceed the cache's maximum size,
inserting the second one ejected the first one. Its freed buffers were then
read by the multiplication.
---
 ruy/prepacked_cache.cc         | 10 ++++++++--
 ruy/prepacked_cache.h          | 13 ++++++++++++-
 ruy/prepare_packed_matrices.cc |  4 ++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index ca114d5..f96449a 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -122,11 +122,13 @@ void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes) {
   profiler::ScopeLabel label("PrepackedCacheEjection");
   // While we are above the threshold of ejection, eject the LRU entry.
   while (!cache_.empty() && buffers_bytes_ + new_bytes > max_buffers_bytes_) {
-    EjectOne();
+    if (!EjectOne()) {
+      break;
+    }
   }
 }
 
-void PrepackedCache::EjectOne() {
+bool PrepackedCache::EjectOne() {
   auto oldest = cache_.begin();
   Timestamp oldest_timestamp = oldest->second.timestamp;
   {
@@ -137,10 +139,14 @@ void PrepackedCache::EjectOne() {
       }
     }
   }
+  if (oldest_timestamp >= operation_timestamp_) {
+    return false;
+  }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
   buffers_bytes_ -= AllocatedBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
+  return true;
 }
 
 }  // namespace ruy
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index b978cda..90a322e 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -18,6 +18,7 @@ limitations under the License.
 
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <unordered_map>
 
 #include "ruy/mat.h"
@@ -113,6 +114,11 @@ class PrepackedCache final {
   // Returns the number of packed matrices held in this cache.
   int MatrixCount() const { return cache_.size(); }
 
+  // Marks the start of an operation that may use several entries at once.
+  // Entries returned by Get after this call are not ejected until the next call,
+  // even if that means exceeding the maximum size.
+  void BeginOperation() { operation_timestamp_ = timestamp_; }
+
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
   // `src` is the source matrix.
@@ -138,13 +144,18 @@ class PrepackedCache final {
   Action Get(const void* src_data, PEMat* packed_matrix);
 
  private:
-  void EjectOne();
+  // Ejects the least recently used entry. Returns false if there is none that
+  // may be ejected.
+  bool EjectOne();
   void EjectUntilRoomFor(std::ptrdiff_t new_bytes);
 
   std::unordered_map<Key, Entry, KeyHash> cache_;
   const std::ptrdiff_t max_buffers_bytes_;
   std::ptrdiff_t buffers_bytes_ = 0;
   Timestamp timestamp_ = 0;
+  // Entries whose timestamp is not older than this are in use by the current
+  // operation, see BeginOperation.
+  Timestamp operation_timestamp_ = std::numeric_limits<Timestamp>::max();
 };
 
 }  // namespace ruy
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 1f41c61..ef34324 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,6 +74,10 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
+      if (side == Side::kLhs || !params->is_prepacked[Side::kLhs]) {
+        // From here on, caching one operand must not eject the other one.
+        cache->BeginOperation();
+      }
       auto action = cache->Get(params->src[side], &packed_matrix);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
-- 
2.43.0


From df2fe9c8d1d06ed8e614ff8eabec8196e8b3c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:28 +0000
Subject: [PATCH 05/11] fix: keep the portable path enabled when paths come
 from the environment

RUY_PATHS values without the portable bit left calls whose compiled set did
not intersect the value without any path, which aborts.  The setter already
adds the portable path; do the same for the environment variable.
---
 ruy/ctx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..bc17b0b 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,8 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // As in SetRuntimeEnabledPaths, non-arch paths are always enabled.
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From 3d30fe1570d12bb2e64b879a3bbc83e60eb1ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:28 +0000
Subject: [PATCH 06/11] fix: avoid int overflow in the work planning of large
 problems

Operands totalling more than 2 GB overflowed the byte counts used to choose
the traversal order and to score block sizes.
---
 ruy/block_map.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ruy/block_map.cc b/ruy/block_map.cc
index e04e7af..3c5f970 100644
--- a/ruy/block_map.cc
+++ b/ruy/block_map.cc
@@ -136,9 +136,12 @@ BlockMapTraversalOrder GetTraversalOrder(
     int rhs_scalar_size, const CpuCacheParams& cpu_cache_params) {
   static constexpr bool kAnyFractal =
       RUY_OPT(FRACTAL_Z) | RUY_OPT(FRACTAL_U) | RUY_OPT(FRACTAL_HILBERT);
-  const int working_set_size =
-      (lhs_scalar_size * rows_after_rectangularness_division +
-       rhs_scalar_size * cols_after_rectangularness_division) *
+  // Use int64 as the operands may total more than 2 GB.
+  const std::int64_t working_set_size =
+      (static_cast<std::int64_t>(lhs_scalar_size) *
+           rows_after_rectangularness_division +
+       static_cast<std::int64_t>(rhs_scalar_size) *
+           cols_after_rectangularness_division) *
       depth;
   if (kAnyFractal && (working_set_size > cpu_cache_params.local_cache_size)) {
     if (RUY_OPT(FRACTAL_HILBERT) &&
@@ -258,8 +261,10 @@ int GetCacheLocalityScore(int block_size_log2, int rows, int cols, int depth,
   }
   const int block_rows = std::min(1 << block_size_log2, rows);
   const int block_cols = std::min(1 << block_size_log2, cols);
-  const int total_read_bytes =
-      (lhs_scalar_size * block_rows + rhs_scalar_size * block_cols) * depth;
+  const std::int64_t total_read_bytes =
+      static_cast<std::int64_t>(lhs_scalar_size * block_rows +
+                                rhs_scalar_size * block_cols) *
+      depth;
   const int total_read_bytes_log2 = ceil_log2(total_read_bytes);
   const int nonlocality_log2 =
       total_read_bytes_log2 - floor_log2(cpu_cache_params.local_cache_size);
-- 
2.43.0


From 861e70688a7e6e963082e7dc30136142fb1fcec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:28 +0000
Subject: [PATCH 07/11] fix: compute the zero-point product term without signed
 overflow

For depths above 131072 the product of both zero points and the depth does
not fit an int.  The term wraps like the accumulators, so the result was
right, but the multiplication was undefined.
---
 ruy/kernel_common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruy/kernel_common.h b/ruy/kernel_common.h
index 69e819b..c24cb15 100644
--- a/ruy/kernel_common.h
+++ b/ruy/kernel_common.h
@@ -177,7 +177,11 @@ void MakeKernelParams8bit(const PMat<std::int8_t>& lhs,
   params->rhs_zero_point = rhs.zero_point;
   params->dst_zero_point = dst->zero_point;
   params->depth = depth;
-  params->prod_zp_depth = lhs.zero_point * rhs.zero_point * depth;
+  // This term wraps around for large depths, as do the accumulators it is
+  // added to, so compute it in unsigned arithmetic.
+  params->prod_zp_depth = static_cast<std::int32_t>(
+      static_cast<std::uint32_t>(lhs.zero_point * rhs.zero_point) *
+      static_cast<std::uint32_t>(depth));
   params->flags |= RUY_ASM_FLAG_NEEDS_LEFT_SHIFT;
   if (mul_params.multiplier_fixedpoint_perchannel()) {
     // Temporary release-assert to debug some crashes in an application.
-- 
2.43.0


From b9c03f5022f084c1d93e237dcb77ddec5e81da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:11 +0000
Subject: [PATCH 08/11] fix: keep the allocator usable when regrowing its
 buffer fails

---
 ruy/allocator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..3935256 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // If that failed, continue without a buffer.
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From 345bbe331d8a8070635f5d0d275ff4d80cf0ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:11 +0000
Subject: [PATCH 09/11] fix: check the allocations of cached packed matrices

---
 ruy/prepacked_cache.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index f96449a..1a58f0a 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -15,6 +15,7 @@ limitations under the License.
 
 #include "ruy/prepacked_cache.h"
 
+#include "ruy/check_macros.h"
 #include "ruy/mat.h"
 #include "ruy/profiler/instrumentation.h"
 #include "ruy/system_aligned_alloc.h"
@@ -38,9 +39,11 @@ std::ptrdiff_t AllocatedBytes(const PEMat& packed_matrix) {
 // and the runtime data types, are already populated.
 std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
   packed_matrix->data = detail::SystemAlignedAlloc(DataBytes(*packed_matrix));
+  RUY_CHECK(packed_matrix->data != nullptr);
   if (!packed_matrix->sums_type.is_floating_point) {
     // Integer quantized matrices also need the `sums` buffer.
     packed_matrix->sums = detail::SystemAlignedAlloc(SumsBytes(*packed_matrix));
+    RUY_CHECK(packed_matrix->sums != nullptr);
   }
   return AllocatedBytes(*packed_matrix);
 }
-- 
2.43.0


From a6d9195a49b5187412ef10539af2a19989a06351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:02:42 +0000
Subject: [PATCH 10/11] fix: include <cstring> in trace.h

Builds with RUY_TRACE defined did not compile: strlen and strcmp were
used without the header that declares them.
---
 ruy/trace.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruy/trace.h b/ruy/trace.h
index 4f5059e..0caafb5 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -21,6 +21,7 @@ limitations under the License.
 #include <algorithm>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <memory>
 #include <mutex>
 #include <string>
-- 
2.43.0


From c89128d84da8e490e9c675b2fdcf5cc84fe4567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:02:42 +0000
Subject: [PATCH 11/11] fix: print the right width of the wider columns of
 blocks in traces

The trace of a block map added the kernel's number of rows instead of its
number of columns to the width of the narrower columns of blocks.
---
 ruy/trace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/trace.h b/ruy/trace.h
index 0caafb5..6cb7f1a 100644
--- a/ruy/trace.h
+++ b/ruy/trace.h
@@ -685,7 +685,7 @@ inline std::string str(Path paths) {
       "have %d columns ",                                                      \
       block_map->large_blocks[Side::kRhs],                                     \
       block_map->small_block_dims[Side::kRhs] +                                \
-          block_map->kernel_dims[Side::kLhs],                                  \
+          block_map->kernel_dims[Side::kRhs],                                  \
       block_map->small_block_dims[Side::kRhs]);                                \
   ThreadLocalTrace()->Write(                                                   \
       "Traversal order: %s",                                                   \
-- 
2.43.0

